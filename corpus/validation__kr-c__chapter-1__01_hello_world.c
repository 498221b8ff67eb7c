/* K&R C Chapter 1.1: Hello, World!
 * Page 6
 * The first C program in K&R
 */

#include <stdio.h>

int main() {
    printf("hello, world\n");
    return 0;
}
