X(device) X(device_fail) X(fill1) X(fill2) X(fill_many) X(fill_slice) X(scalar) X(expr1) X(expr2) X(cover) X(vary) X(invalid) X(shuffle) X(shuffle_part) X(shuffle_cover) X(semi_fill) X(semi_scalar) X(semi_expr) X(semi_cover) X(semi_invalid) X(preset_arrays)
