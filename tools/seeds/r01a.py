ID='r01-escape-sum'; PROPERTY='R01'
NEEDS='a percent escape whose first digit is a hexadecimal digit other than 0 and whose second is not one'
BREAKS='a malformed escape such as %4g is decoded to another byte instead of standing for itself'
EDITS=[('src/blogc-runserver/httpd-utils.c','if (p1 >= 0 && p2 >= 0) {','if (p1 + p2 >= 0) {')]
LINK=['common', 'blogc-runserver']
FILES={'demo.c':'''#include "blogc-runserver/httpd-utils.h"
#include <string.h>
int main(void) {
    return strcmp(br_urldecode("/%41%zz%"), "/A%zz%") || strcmp(br_urldecode("/a%4g/%fx"), "/a%4g/%fx");
}
'''}
