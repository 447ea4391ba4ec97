X(build) X(expr) X(reduce) X(sortit) X(resize) X(edit) X(slices) X(views) X(iterate) X(predicates) X(stable) X(mat) X(random) X(semi) X(shuffle) X(out1) X(out2) X(scalar_io) X(in1) X(in2) X(file) X(invalid) X(tools) X(copy) X(moveit) X(timing) X(block) X(fault) X(print1) X(print2) X(print_many) X(printn1) X(print_scalar) X(user_write) X(print_expr)
