X(mkview) X(evview) X(dropview) X(wrview) X(iterview)
