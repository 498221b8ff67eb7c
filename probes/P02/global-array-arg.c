#include <stdio.h>
int g[3] = {1, 2, 3}; int first(int a[3]) { return a[0]; } int main(void) { printf("%d\n", first(g)); return 0; }
