"""libc symbols the code under test may reach that meet the outside world.

Every one is renamed (objcopy --redefine-sym) in the objects built from /repo, so the simulator
owns it.  stdio calls on a FILE (fprintf, fgetc, fseek...) are real glibc over the simulator's files."""

SEAM = """
malloc calloc realloc reallocarray free strdup strndup aligned_alloc posix_memalign
fopen fopen64 freopen fdopen fclose fileno tmpfile tmpnam mkstemp
open open64 openat creat read write pread pwrite lseek close dup dup2 fsync fdatasync ftruncate truncate
access stat lstat fstat stat64 lstat64 fstat64 fstatat chmod fchmod umask
readlink realpath getcwd chdir unlink remove rename mkdir rmdir link symlink isatty
time clock gettimeofday clock_gettime rand srand random srandom rand_r getpid getppid getuid geteuid getenv secure_getenv
nanosleep usleep sleep
system popen pclose exit _exit abort atexit
pthread_mutex_lock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_spin_lock pthread_once mtx_lock call_once flockfile funlockfile
strtok
getline getdelim asprintf vasprintf open_memstream fmemopen
""".split()
