#include <stdio.h>
int sum(int *a, int len) { int s = 0; for (int i = 0; i < len; i++) s += a[i]; return s; } int main(void) { int v[4] = {1, 2, 3, 4}; printf("%d\n", sum(v, 2)); return 0; }
