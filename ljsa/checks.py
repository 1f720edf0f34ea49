import c_guard, c_visibility, c_main, c_determ, c_compare, c_bracket, c_columns, c_conllx, c_effects, c_order, c_kinds, c_failures, c_counter, c_shape, c_panics, c_term, c_frames, c_step
