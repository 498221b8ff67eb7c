#include <stdio.h>
int main(void) { int i = 7; for (int i = 0; i < 3; i++) { printf("%d\n", i); } printf("%d\n", i); return 0; }
