/* stands in for the generated header where the tree was not built */
char LL_SHIM[] = {0};
unsigned int LL_SHIM_len = 1;
