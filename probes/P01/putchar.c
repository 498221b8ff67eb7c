#include <stdio.h>
int main(void) { putchar(65); putchar(10); return 0; }
