#include <stdio.h>
int f(int x) { int r = 0; switch (x) { case 1: if (r == 0) { r = 5; break; } r = 6; break; default: r = 9; } return r; } int main(void) { printf("%d %d\n", f(1), f(2)); return 0; }
