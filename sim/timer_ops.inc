X(advance) X(jump) X(preempt) X(create) X(restart) X(read) X(copy) X(assign) X(destroy) X(macro) X(macro_throw) X(macro_nested)
