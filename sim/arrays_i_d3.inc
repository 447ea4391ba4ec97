X(remove_rows) X(remove_cols) X(remove_rows_vec) X(remove_cols_vec) X(insert_rows) X(insert_cols) X(insert_row) X(insert_col) X(move1) X(massign1) X(swap1) X(steal1) X(move2) X(massign2) X(swap2) X(steal2) X(fixmove)
