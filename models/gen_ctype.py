"""Writes models/ctype_tab.h from this system's C locale tables (run once)."""
import subprocess, tempfile, os
src = r'''
#include <ctype.h>
#include <stdio.h>
int main(void){int i;const unsigned short*t=*__ctype_b_loc();
printf("/* C locale, generated by gen_ctype.py */\n");
for(i=-128;i<256;i++)printf("%d,%s",t[i],(i+1)%16==0?"\n":"");return 0;}'''
d = tempfile.mkdtemp()
open(d + "/a.c", "w").write(src)
subprocess.check_call(["gcc", "-o", d + "/a", d + "/a.c"])
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "ctype_tab.h"), "w").write(
    subprocess.check_output([d + "/a"]).decode())
