#include <stdio.h>
#include <stdlib.h>

int main(void) {
    int *a = malloc(sizeof(int) * 2);
    a[0] = 1;
    a[1] = 2;
    a = realloc(a, sizeof(int) * 4);
    a[3] = 5;
    printf("%d %d\n", a[0], a[3]);
    free(a);
    return 0;
}
