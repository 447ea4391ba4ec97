X(ctor1) X(ctor1_list) X(ctor1_iter) X(ctor1_op) X(copy1) X(eval1) X(assign1_val) X(assign1_list) X(assign1_op) X(slice1_val) X(slice1_op) X(write1) X(comp1_val) X(comp1_op) X(resize1) X(rassign1) X(remove1) X(remove1_vec) X(insert1_val) X(insert1_op) X(sort1) X(foreach1)
