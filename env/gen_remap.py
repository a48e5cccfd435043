#!/usr/bin/env python3
# list of functions the file system model replaces: env_X (or env_X_) <- X
import re,sys
src=open(sys.argv[1]).read()+open(sys.argv[2]).read()
names=set(re.findall(r'\benv_([a-z0-9]+_?)\(',src))
std="open openat creat close closefrom read pread write pwrite writev lseek stat lstat fstat access link unlink rename mkdir ftruncate fsync fchmod chmod_ mmap munmap getpagesize getpid time_ fileno getenv sleep usleep fopen fdopen tmpfile fflush fclose fwrite fread fgetc fgets ungetc fseeko fseek ftello ftell rewind feof ferror clearerr setbuf setvbuf fputs puts fputc putc putchar vfprintf fprintf printf vprintf perror getline pipe_ fork wait4 waitpid dup2 execlp execvp poll abort exit getdelim dup truncate_ readv vdprintf dprintf isatty gettimeofday clock_gettime getc".split()
z="deflate deflateEnd deflateInit2_ deflateSetHeader deflateReset inflate inflateEnd inflateInit2_ inflateReset crc32 crc32_combine adler32 deflateInit_ inflateInit_ deflateParams deflatePending deflateTune crc32_z inflateGetHeader inflateSync".split()
out=[]
for n in std:
    out.append(("env_"+n, n.rstrip("_")))
for n in z: out.append(("env_"+n, n))
for n in "SHA256Init SHA256Update SHA256Final SHA256End SHA256Data SHA256Pad SHA256Transform".split(): out.append(("env_"+n,n))
for n in "stdin stdout stderr".split(): out.append(("env_"+n,n))
mode=sys.argv[3]
if mode=="engine":
    print("/* generated by gen_remap.py */")
    for a,b in out: print("#define %s %s"%(a,b))
else:
    for a,b in out: print(b,a)
    for a,b in (("_exit","env__exit"),("fputs_unlocked","env_fputs_unlocked")): print(a,b)
