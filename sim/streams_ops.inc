X(fault) X(preset_arrays) X(read1) X(read2) X(read_file1) X(read_file2) X(print_file) X(print_stream) X(round1) X(round2) X(scalars)
