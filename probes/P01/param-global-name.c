#include <stdio.h>
int n = 5; int f(int n) { return n + 1; } int main(void) { printf("%d %d\n", f(1), n); return 0; }
