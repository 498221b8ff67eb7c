#include <stdio.h>
int main(void) { long x = 3000000000L; printf("%ld\n", x); return 0; }
