#include <stdio.h>
int main(void) {
    printf("%d\n", 1)
    return 0;
}
