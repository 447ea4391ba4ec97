X(apiop) X(apiexp) X(badop)
