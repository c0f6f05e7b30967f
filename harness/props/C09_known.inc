static const Known KNOWN[] = {{0, 552, 12.1044731679028, 0.0852242822577746}, {0, 5472, 12.5663706143592, 3.08454796334939e-06}};
