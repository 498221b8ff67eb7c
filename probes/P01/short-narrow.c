#include <stdio.h>
int main(void) { short s = (short)70000; printf("%d\n", s); return 0; }
