X(ctor2) X(ctor2_list) X(ctor2_op) X(copy2) X(eval2) X(assign2_val) X(assign2_list) X(assign2_op) X(slice2_val) X(slice2_op) X(write2) X(comp2_val) X(comp2_op) X(resize2) X(rassign2)
