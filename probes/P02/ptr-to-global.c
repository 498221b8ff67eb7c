#include <stdio.h>
int g = 1; void inc(int *p) { *p = *p + 1; } int main(void) { inc(&g); printf("%d\n", g); return 0; }
