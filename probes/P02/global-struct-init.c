#include <stdio.h>
struct P { int x; int y; }; struct P g = { 3, 4 }; int main(void) { printf("%d %d\n", g.x, g.y); return 0; }
