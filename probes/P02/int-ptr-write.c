#include <stdio.h>
void fill(int *a, int len) { for (int i = 0; i < len; i++) a[i] = i * 2; } int main(void) { int v[3] = {9, 9, 9}; fill(v, 3); printf("%d %d %d\n", v[0], v[1], v[2]); return 0; }
