#include <stdio.h>
int f(int x) { return x + 1; } int main(void) { char c = 3; printf("%d\n", f(c)); return 0; }
