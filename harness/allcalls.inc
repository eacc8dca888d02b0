        {"undo_state_count_for_id", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a1{}; int a2{}; return api::mkernel_undo_state_count_for_id(id, a1, a2); }},
        {"clear_undo_state_for_id", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_clear_undo_state_for_id(id); }},
        {"contacts_compute_boundary", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_contacts_compute_boundary(id, ints, g.list(), dd[3]); }},
        {"contacts_compute_multiple", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_contacts_compute_multiple(id, ints); }},
        {"contacts_compute_single", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_contacts_compute_single(id, ints, g.list(), dd[3]); }},
        {"contacts_compute_with_points", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_contacts_compute_with_points(id, ints, g.list()); }},
        {"contacts_compute_with_polygons", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_contacts_compute_with_polygons(id, ints, g.list()); }},
        {"contacts_get_data", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Contacts a1{}; return api::mkernel_contacts_get_data(id, a1); }},
        {"contacts_get_dimensions", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Contacts a1{}; return api::mkernel_contacts_get_dimensions(id, a1); }},
        {"contacts_set", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Contacts a1{}; return api::mkernel_contacts_set(id, a1); }},
        {"curvilinear_compute_curvature", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_compute_curvature(id, ii[1], dbls); }},
        {"curvilinear_compute_orthogonal_grid_from_splines", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::CurvilinearParameters a2{}; meshkernel::SplinesToCurvilinearParameters a3{}; return api::mkernel_curvilinear_compute_orthogonal_grid_from_splines(id, g.list(), a2, a3); }},
        {"curvilinear_compute_grid_from_splines", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::CurvilinearParameters a2{}; return api::mkernel_curvilinear_compute_grid_from_splines(id, g.list(), a2); }},
        {"curvilinear_compute_smoothness", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_compute_smoothness(id, ii[1], dbls); }},
        {"curvilinear_compute_transfinite_from_polygon", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_compute_transfinite_from_polygon(id, g.list(), ii[2], ii[3], ii[0], ii[1]); }},
        {"curvilinear_compute_transfinite_from_splines", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::CurvilinearParameters a2{}; return api::mkernel_curvilinear_compute_transfinite_from_splines(id, g.list(), a2); }},
        {"curvilinear_compute_transfinite_from_triangle", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_compute_transfinite_from_triangle(id, g.list(), ii[2], ii[3], ii[0]); }},
        {"curvilinear_convert_to_mesh2d", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_convert_to_mesh2d(id); }},
        {"curvilinear_delete_exterior", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_delete_exterior(id, dd[1], dd[2], dd[3], dd[0]); }},
        {"curvilinear_delete_interior", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_delete_interior(id, dd[1], dd[2], dd[3], dd[0]); }},
        {"curvilinear_delete_node", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_delete_node(id, dd[1], dd[2]); }},
        {"curvilinear_delete_orthogonal_grid_from_splines", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_delete_orthogonal_grid_from_splines(id); }},
        {"curvilinear_derefine", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_derefine(id, dd[1], dd[2], dd[3], dd[0]); }},
        {"curvilinear_finalize_line_shift", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_finalize_line_shift(id); }},
        {"curvilinear_finalize_orthogonalize", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_finalize_orthogonalize(id); }},
        {"curvilinear_get_data", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::CurvilinearGrid a1{}; return api::mkernel_curvilinear_get_data(id, a1); }},
        {"curvilinear_get_boundaries_as_polygons", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_curvilinear_get_boundaries_as_polygons(id, ii[1], ii[2], ii[3], ii[0], ol); }},
        {"curvilinear_count_boundaries_as_polygons", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a5{}; return api::mkernel_curvilinear_count_boundaries_as_polygons(id, ii[1], ii[2], ii[3], ii[0], a5); }},
        {"curvilinear_get_dimensions", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::CurvilinearGrid a1{}; return api::mkernel_curvilinear_get_dimensions(id, a1); }},
        {"curvilinear_get_location_index", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::BoundingBox a4{}; int a5{}; return api::mkernel_curvilinear_get_location_index(id, dd[1], dd[2], ii[3], a4, a5); }},
        {"curvilinear_initialize_line_shift", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_initialize_line_shift(id); }},
        {"curvilinear_initialize_orthogonal_grid_from_splines", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::CurvilinearParameters a2{}; meshkernel::SplinesToCurvilinearParameters a3{}; return api::mkernel_curvilinear_initialize_orthogonal_grid_from_splines(id, g.list(), a2, a3); }},
        {"curvilinear_initialize_orthogonalize", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::OrthogonalizationParameters a1{}; return api::mkernel_curvilinear_initialize_orthogonalize(id, a1); }},
        {"curvilinear_insert_face", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_insert_face(id, dd[1], dd[2]); }},
        {"curvilinear_iterate_orthogonal_grid_from_splines", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_iterate_orthogonal_grid_from_splines(id, ii[1]); }},
        {"curvilinear_line_attraction_repulsion", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_line_attraction_repulsion(id, dd[1], dd[2], dd[3], dd[0], dd[1], dd[2], dd[3], dd[0], dd[1]); }},
        {"curvilinear_line_mirror", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_line_mirror(id, dd[1], dd[2], dd[3], dd[0], dd[1]); }},
        {"curvilinear_line_shift", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_line_shift(id); }},
        {"curvilinear_compute_rectangular_grid", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::MakeGridParameters a1{}; return api::mkernel_curvilinear_compute_rectangular_grid(id, a1); }},
        {"curvilinear_compute_rectangular_grid_from_polygon", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::MakeGridParameters a1{}; return api::mkernel_curvilinear_compute_rectangular_grid_from_polygon(id, a1, g.list()); }},
        {"curvilinear_compute_rectangular_grid_on_extension", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::MakeGridParameters a1{}; return api::mkernel_curvilinear_compute_rectangular_grid_on_extension(id, a1); }},
        {"curvilinear_compute_circular_grid", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::MakeGridParameters a1{}; return api::mkernel_curvilinear_compute_circular_grid(id, a1); }},
        {"curvilinear_move_node", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_move_node(id, dd[1], dd[2], dd[3], dd[0]); }},
        {"curvilinear_move_node_line_shift", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_move_node_line_shift(id, dd[1], dd[2], dd[3], dd[0]); }},
        {"curvilinear_orthogonalize", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_orthogonalize(id); }},
        {"curvilinear_refine", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_refine(id, dd[1], dd[2], dd[3], dd[0], ii[1]); }},
        {"curvilinear_refresh_orthogonal_grid_from_splines", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_refresh_orthogonal_grid_from_splines(id); }},
        {"curvilinear_full_refine", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_full_refine(id, ii[1], ii[2]); }},
        {"curvilinear_set", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::CurvilinearGrid a1{}; return api::mkernel_curvilinear_set(id, a1); }},
        {"curvilinear_set_block_line_shift", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_set_block_line_shift(id, dd[1], dd[2], dd[3], dd[0]); }},
        {"curvilinear_set_block_orthogonalize", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_set_block_orthogonalize(id, dd[1], dd[2], dd[3], dd[0]); }},
        {"curvilinear_set_frozen_lines_orthogonalize", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_set_frozen_lines_orthogonalize(id, dd[1], dd[2], dd[3], dd[0]); }},
        {"curvilinear_set_line_line_shift", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_set_line_line_shift(id, dd[1], dd[2], dd[3], dd[0]); }},
        {"curvilinear_smoothing", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_smoothing(id, ii[1], dd[2], dd[3], dd[0], dd[1]); }},
        {"curvilinear_smoothing_directional", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_smoothing_directional(id, ii[1], dd[2], dd[3], dd[0], dd[1], dd[2], dd[3], dd[0], dd[1]); }},
        {"curvilinear_snap_to_landboundary", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_snap_to_landboundary(id, g.list(), dd[2], dd[3], dd[0], dd[1], dd[2], dd[3]); }},
        {"curvilinear_snap_to_spline", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_curvilinear_snap_to_spline(id, g.list(), dd[2], dd[3], dd[0], dd[1], dd[2], dd[3]); }},
        {"get_projection", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a1{}; return api::mkernel_get_projection(id, a1); }},
        {"mesh1d_get_data", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Mesh1D a1{}; return api::mkernel_mesh1d_get_data(id, a1); }},
        {"mesh1d_get_dimensions", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Mesh1D a1{}; return api::mkernel_mesh1d_get_dimensions(id, a1); }},
        {"mesh1d_set", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Mesh1D a1{}; return api::mkernel_mesh1d_set(id, a1); }},
        {"mesh1d_add", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Mesh1D a1{}; return api::mkernel_mesh1d_add(id, a1); }},
        {"mesh2d_averaging_interpolation", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_mesh2d_averaging_interpolation(id, g.list(), ii[2], ii[3], dd[0], 1, ol); }},
        {"mesh2d_compute_inner_ortogonalization_iteration", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_compute_inner_ortogonalization_iteration(id); }},
        {"mesh2d_rotate", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_rotate(id, dd[1], dd[2], dd[3]); }},
        {"splines_snap_to_landboundary", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_splines_snap_to_landboundary(id, g.list(), ol, ii[3], ii[0]); }},
        {"mesh2d_translate", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_translate(id, dd[1], dd[2]); }},
        {"mesh2d_casulli_derefinement_elements", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_mesh2d_casulli_derefinement_elements(id, ol); }},
        {"mesh2d_casulli_derefinement_elements_on_polygon", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_mesh2d_casulli_derefinement_elements_on_polygon(id, g.list(), ol); }},
        {"mesh2d_casulli_derefinement", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_casulli_derefinement(id); }},
        {"mesh2d_casulli_derefinement_on_polygon", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_casulli_derefinement_on_polygon(id, g.list()); }},
        {"mesh2d_casulli_refinement", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_casulli_refinement(id); }},
        {"mesh2d_casulli_refinement_on_polygon", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_casulli_refinement_on_polygon(id, g.list()); }},
        {"mesh2d_compute_orthogonalization", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::OrthogonalizationParameters a2{}; return api::mkernel_mesh2d_compute_orthogonalization(id, ii[1], a2, g.list(), g.list()); }},
        {"mesh2d_connect_meshes", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Mesh2D a1{}; return api::mkernel_mesh2d_connect_meshes(id, a1, dd[2]); }},
        {"mesh2d_convert_projection", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_convert_projection(id, ii[1], ""); }},
        {"mesh2d_convert_to_curvilinear", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_convert_to_curvilinear(id, dd[1], dd[2]); }},
        {"mesh2d_count_hanging_edges", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a1{}; return api::mkernel_mesh2d_count_hanging_edges(id, a1); }},
        {"mesh2d_count_mesh_boundaries_as_polygons", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a1{}; return api::mkernel_mesh2d_count_mesh_boundaries_as_polygons(id, a1); }},
        {"mesh2d_count_nodes_in_polygons", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a3{}; return api::mkernel_mesh2d_count_nodes_in_polygons(id, g.list(), ii[2], a3); }},
        {"mesh2d_count_obtuse_triangles", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a1{}; return api::mkernel_mesh2d_count_obtuse_triangles(id, a1); }},
        {"mesh2d_count_small_flow_edge_centers", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a2{}; return api::mkernel_mesh2d_count_small_flow_edge_centers(id, dd[1], a2); }},
        {"mesh2d_delete", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_delete(id, g.list(), ii[2], ii[3]); }},
        {"mesh2d_delete_edge", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_delete_edge(id, dd[1], dd[2], dd[3], dd[0], dd[1], dd[2]); }},
        {"mesh2d_delete_edge_by_index", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_delete_edge_by_index(id, ii[1]); }},
        {"mesh2d_delete_hanging_edges", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_delete_hanging_edges(id); }},
        {"mesh2d_delete_node", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_delete_node(id, ii[1]); }},
        {"mesh2d_delete_orthogonalization", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_delete_orthogonalization(id); }},
        {"mesh2d_delete_small_flow_edges_and_small_triangles", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_delete_small_flow_edges_and_small_triangles(id, dd[1], dd[2]); }},
        {"mesh2d_finalize_inner_ortogonalization_iteration", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_finalize_inner_ortogonalization_iteration(id); }},
        {"mesh2d_flip_edges", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_flip_edges(id, ii[1], ii[2], g.list(), g.list()); }},
        {"mesh2d_get_closest_node", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; double a8{}; double a9{}; return api::mkernel_mesh2d_get_closest_node(id, dd[1], dd[2], dd[3], dd[0], dd[1], dd[2], dd[3], a8, a9); }},
        {"mesh2d_get_data", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Mesh2D a1{}; return api::mkernel_mesh2d_get_data(id, a1); }},
        {"mesh2d_get_node_edge_data", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Mesh2D a1{}; return api::mkernel_mesh2d_get_node_edge_data(id, a1); }},
        {"mesh2d_get_dimensions", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Mesh2D a1{}; return api::mkernel_mesh2d_get_dimensions(id, a1); }},
        {"mesh2d_get_edge", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a7{}; return api::mkernel_mesh2d_get_edge(id, dd[1], dd[2], dd[3], dd[0], dd[1], dd[2], a7); }},
        {"mesh2d_get_hanging_edges", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_get_hanging_edges(id, ints); }},
        {"mesh2d_get_face_polygons", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_get_face_polygons(id, ii[1], g.list()); }},
        {"mesh2d_get_face_polygons_dimension", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a2{}; return api::mkernel_mesh2d_get_face_polygons_dimension(id, ii[1], a2); }},
        {"mesh2d_get_filtered_face_polygons_dimension", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a4{}; return api::mkernel_mesh2d_get_filtered_face_polygons_dimension(id, ii[1], dd[2], dd[3], a4); }},
        {"mesh2d_get_filtered_face_polygons", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_get_filtered_face_polygons(id, ii[1], dd[2], dd[3], g.list()); }},
        {"mesh2d_get_location_index", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::BoundingBox a4{}; int a5{}; return api::mkernel_mesh2d_get_location_index(id, dd[1], dd[2], ii[3], a4, a5); }},
        {"mesh2d_get_mesh_boundaries_as_polygons", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_mesh2d_get_mesh_boundaries_as_polygons(id, ol); }},
        {"mesh2d_get_node_index", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a8{}; return api::mkernel_mesh2d_get_node_index(id, dd[1], dd[2], dd[3], dd[0], dd[1], dd[2], dd[3], a8); }},
        {"mesh2d_get_nodes_in_polygons", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_get_nodes_in_polygons(id, g.list(), ii[2], ints); }},
        {"mesh2d_get_obtuse_triangles_mass_centers", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_mesh2d_get_obtuse_triangles_mass_centers(id, ol); }},
        {"mesh2d_get_orthogonality", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_mesh2d_get_orthogonality(id, ol); }},
        {"mesh2d_get_property", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_get_property(id, ii[1], g.list()); }},
        {"mesh2d_get_property_dimension", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a2{}; return api::mkernel_mesh2d_get_property_dimension(id, ii[1], a2); }},
        {"mesh2d_get_small_flow_edge_centers", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_mesh2d_get_small_flow_edge_centers(id, dd[1], ol); }},
        {"mesh2d_get_smoothness", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_mesh2d_get_smoothness(id, ol); }},
        {"mesh2d_initialize_orthogonalization", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::OrthogonalizationParameters a2{}; return api::mkernel_mesh2d_initialize_orthogonalization(id, ii[1], a2, g.list(), g.list()); }},
        {"mesh2d_insert_edge", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a3{}; return api::mkernel_mesh2d_insert_edge(id, ii[1], ii[2], a3); }},
        {"mesh2d_insert_edge_from_coordinates", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a5{}; int a6{}; int a7{}; return api::mkernel_mesh2d_insert_edge_from_coordinates(id, dd[1], dd[2], dd[3], dd[0], a5, a6, a7); }},
        {"mesh2d_insert_node", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a3{}; return api::mkernel_mesh2d_insert_node(id, dd[1], dd[2], a3); }},
        {"mesh2d_intersections_from_polygon", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_intersections_from_polygon(id, g.list(), ints, ints, dbls, dbls, ints, ints, ints, ints); }},
        {"mesh2d_make_global", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_make_global(id, ii[1], ii[2]); }},
        {"mesh2d_make_triangular_mesh_from_polygon", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_make_triangular_mesh_from_polygon(id, g.list()); }},
        {"mesh2d_make_triangular_mesh_from_samples", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_make_triangular_mesh_from_samples(id, g.list()); }},
        {"mesh2d_make_rectangular_mesh", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::MakeGridParameters a1{}; return api::mkernel_mesh2d_make_rectangular_mesh(id, a1); }},
        {"mesh2d_make_rectangular_mesh_from_polygon", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::MakeGridParameters a1{}; return api::mkernel_mesh2d_make_rectangular_mesh_from_polygon(id, a1, g.list()); }},
        {"mesh2d_make_rectangular_mesh_on_extension", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::MakeGridParameters a1{}; return api::mkernel_mesh2d_make_rectangular_mesh_on_extension(id, a1); }},
        {"mesh2d_merge_nodes", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_merge_nodes(id, g.list()); }},
        {"mesh2d_merge_nodes_with_merging_distance", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_merge_nodes_with_merging_distance(id, g.list(), dd[2]); }},
        {"mesh2d_merge_two_nodes", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_merge_two_nodes(id, ii[1], ii[2]); }},
        {"mesh2d_move_node", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_move_node(id, dd[1], dd[2], ii[3]); }},
        {"mesh2d_prepare_outer_iteration_orthogonalization", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_prepare_outer_iteration_orthogonalization(id); }},
        {"mesh2d_refine_based_on_gridded_samples", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::GriddedSamples a1{}; meshkernel::MeshRefinementParameters a2{}; return api::mkernel_mesh2d_refine_based_on_gridded_samples(id, a1, a2, true); }},
        {"mesh2d_refine_based_on_polygon", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::MeshRefinementParameters a2{}; return api::mkernel_mesh2d_refine_based_on_polygon(id, g.list(), a2); }},
        {"mesh2d_refine_based_on_samples", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; meshkernel::MeshRefinementParameters a4{}; return api::mkernel_mesh2d_refine_based_on_samples(id, g.list(), dd[2], ii[3], a4); }},
        {"mesh2d_refine_ridges_based_on_gridded_samples", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::GriddedSamples a1{}; meshkernel::MeshRefinementParameters a5{}; return api::mkernel_mesh2d_refine_ridges_based_on_gridded_samples(id, a1, dd[2], ii[3], ii[0], a5); }},
        {"mesh2d_remove_disconnected_regions", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_remove_disconnected_regions(id); }},
        {"mesh2d_set", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Mesh2D a1{}; return api::mkernel_mesh2d_set(id, a1); }},
        {"mesh2d_snap_to_landboundary", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_snap_to_landboundary(id, g.list(), g.list()); }},
        {"mesh2d_split_row", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_mesh2d_split_row(id, ii[1], ii[2]); }},
        {"mesh2d_add", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; api::Mesh2D a1{}; return api::mkernel_mesh2d_add(id, a1); }},
        {"mesh2d_triangulation_interpolation", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_mesh2d_triangulation_interpolation(id, g.list(), ii[2], ol); }},
        {"network1d_compute_fixed_chainages", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_network1d_compute_fixed_chainages(id, dbls, ii[2], dd[3], dd[0]); }},
        {"network1d_compute_offsetted_chainages", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_network1d_compute_offsetted_chainages(id, dd[1]); }},
        {"network1d_set", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_network1d_set(id, g.list()); }},
        {"network1d_to_mesh1d", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd;  return api::mkernel_network1d_to_mesh1d(id, dd[1]); }},
        {"polygon_count_offset", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a4{}; return api::mkernel_polygon_count_offset(id, g.list(), ii[2], dd[3], a4); }},
        {"polygon_count_refine", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a5{}; return api::mkernel_polygon_count_refine(id, g.list(), ii[2], ii[3], dd[0], a5); }},
        {"polygon_count_linear_refine", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; int a4{}; return api::mkernel_polygon_count_linear_refine(id, g.list(), ii[2], ii[3], a4); }},
        {"polygon_get_included_points", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_polygon_get_included_points(id, g.list(), g.list(), ol); }},
        {"polygon_get_offset", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_polygon_get_offset(id, g.list(), ii[2], dd[3], ol); }},
        {"polygon_refine", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_polygon_refine(id, g.list(), ii[2], ii[3], dd[0], ol); }},
        {"polygon_linear_refine", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_polygon_linear_refine(id, g.list(), ii[2], ii[3], ol); }},
        {"polygon_snap_to_landboundary", [](int id, Geo& g, Geo& o, int* ints, double* dbls, const std::array<int, 4>& ii, const std::array<double, 4>& dd)
         { (void)g; (void)o; (void)ints; (void)dbls; (void)ii; (void)dd; auto ol = o.list(); return api::mkernel_polygon_snap_to_landboundary(id, g.list(), ol, ii[3], ii[0]); }},
