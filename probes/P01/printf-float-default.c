#include <stdio.h>
int main(void) { printf("%f\n", 1.5); return 0; }
