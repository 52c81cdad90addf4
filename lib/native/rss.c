/* rss FILE PROGRAM ARGS: run a program and write the most memory it had (kB)
 * into a file.  (A process that is started by a large one is charged with the
 * memory of that one.) */
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/resource.h>
#include <sys/wait.h>

int main(int argc, char **argv)
{
    int status;
    struct rusage usage;
    FILE *f;
    pid_t pid = fork();

    if (!pid) {
        execv(argv[2], argv + 2);
        _exit(127);
    }

    wait4(pid, &status, 0, &usage);
    f = fopen(argv[1], "w");
    fprintf(f, "%ld\n", usage.ru_maxrss);
    fclose(f);

    return WIFEXITED(status) ? WEXITSTATUS(status) : 128 + WTERMSIG(status);
}
