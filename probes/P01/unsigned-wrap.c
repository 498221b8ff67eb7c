#include <stdio.h>
int main(void) { unsigned int x = 0; x = x - 1; printf("%u\n", x); return 0; }
