// 1-D histories
X(ctor1) X(ctor1_list) X(ctor1_iter) X(ctor1_op) X(copy1) X(eval1)
X(assign1_val) X(assign1_list) X(assign1_op) X(slice1_val) X(slice1_op) X(write1) X(comp1_val) X(comp1_op)
X(resize1) X(rassign1) X(remove1) X(remove1_vec) X(insert1_val) X(insert1_op) X(sort1) X(foreach1)
// 2-D histories
X(ctor2) X(ctor2_list) X(ctor2_op) X(copy2) X(eval2)
X(assign2_val) X(assign2_list) X(assign2_op) X(slice2_val) X(slice2_op) X(write2) X(comp2_val) X(comp2_op)
X(resize2) X(rassign2) X(remove_rows) X(remove_cols) X(remove_rows_vec) X(remove_cols_vec)
X(insert_rows) X(insert_cols) X(insert_row) X(insert_col)
// moves, swaps, steals
X(move1) X(massign1) X(swap1) X(steal1) X(move2) X(massign2) X(swap2) X(steal2) X(fixmove)
// allocating helpers without a target
X(alloc_misc) X(matprod) X(read1) X(read2)
// rejected calls
X(bad1) X(bad2) X(badctor) X(badslice) X(badexpr) X(badsize) X(badpos)
// views and deferred expressions
X(mkview) X(evview) X(dropview) X(wrview) X(iterview)
// every way of naming, reading and writing parts of an array
X(api1) X(apiw1) X(badapi1) X(api2) X(apiw2) X(badapi2)
X(apiop) X(apiexp) X(badop)
// queries and reductions
X(red1) X(tiny1) X(pair1) X(sel1) X(badalg) X(red2) X(tiny2) X(pair2)
// iterators
X(walk1) X(walk2) X(walkx) X(keepit) X(stdalg) X(plane) X(baditer)
// slices of slices
X(slc1) X(slcf) X(slc2) X(slcrow)
