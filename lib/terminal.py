"""The REPL at a terminal: typing lines and pressing TAB."""
import fcntl, os, pty, re, select, signal, struct, subprocess, tempfile, termios, time
from engine import Result

PROMPT = 'BIC> '
SYNC = '~'                              # typed after TAB: not a part of any name
INPUTRC = '''set show-all-if-ambiguous on
set completion-query-items -1
set page-completions off
set completion-display-width 0
set bell-style none
set enable-bracketed-paste off
set disable-completion off
'''


class Screen:
    """A dumb terminal: the rows that are complete and the current one."""

    def __init__(self):
        self.rows, self.row, self.col = [], [], 0
        self.running = True             # the program, rather than readline, writes

    def feed(self, data):
        for ch in data:
            if ch == '\n':
                self.rows.append(''.join(self.row))
                self.row, self.col = [], 0
                self.running = self.running or self.entered
                self.entered = False
            elif self.running:
                self.row.append(ch)
                self.col = len(self.row)
                if ''.join(self.row) == PROMPT:
                    self.running = False
            elif ch == '\r':
                self.col = 0
            elif ch == '\b':
                self.col = max(0, self.col - 1)
            else:
                while len(self.row) <= self.col:
                    self.row.append(' ')
                self.row[self.col] = ch
                self.col += 1

    entered = False                     # Return has been typed

    @property
    def line(self):
        return ''.join(self.row[:self.col])

    def at_prompt(self, n=1):
        return ''.join(self.row).rstrip() == (n * PROMPT).rstrip() and self.col == n * len(PROMPT)


stuck = []


class Gone(Exception):
    pass


def run(argv, sc, lines, env, cwd, timeout=30):
    """lines: [(text, whether TAB is pressed rather than Return)].  The result's
    text has one row for each that has been shown; TAB is followed by a row that
    starts with \\x01 and has what was offered."""
    e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'TERM': 'dumb', 'LANG': 'C', 'LC_ALL': 'C', 'TMPDIR': sc.dir,
         'INPUTRC': sc.write('inputrc', INPUTRC)}
    e.update(env)
    e.pop('COLUMNS', None)
    master, slave = pty.openpty()
    mode = termios.tcgetattr(slave)
    mode[1] &= ~termios.OPOST
    termios.tcsetattr(slave, termios.TCSANOW, mode)
    fcntl.ioctl(slave, termios.TIOCSWINSZ, struct.pack('HHHH', 200, 4000, 0, 0))

    def limits():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_NOFILE, (40, 40))

    # (when a good many sessions haven't come to an end, the others won't either)
    scr, out, end = Screen(), [], time.time() + (timeout if len(stuck) < 6 else 5)
    fe = tempfile.TemporaryFile(dir=sc.dir)
    p = subprocess.Popen(argv, stdin=slave, stdout=slave, stderr=fe, cwd=cwd, env=e, start_new_session=True, preexec_fn=limits)
    os.close(slave)
    rc = None

    def until(cond):
        while not cond():
            if time.time() > end:
                raise TimeoutError
            r, _, _ = select.select([master], [], [], .5)
            if r:
                try:
                    d = os.read(master, 65536)
                except OSError:
                    raise Gone
                if not d:
                    raise Gone
                scr.feed(d.decode('latin-1'))

    shown = [0]

    def emit(text=None):
        """Take over the rows since the last time; the first is the line that
        has been typed, if any."""
        rows = scr.rows[shown[0]:]
        shown[0] = len(scr.rows)
        if text is not None and rows and rows[0].rstrip() == (PROMPT + text).rstrip():
            rows[0] = PROMPT + text
        out.extend(rows)

    def send(s):
        os.write(master, s.encode('latin-1'))

    text = None
    try:
        until(scr.at_prompt)
        emit()
        for text, tab in lines:
            n = len(scr.rows)
            if not tab:
                scr.entered = True
                send(text + '\n')
                until(lambda: len(scr.rows) > n and scr.at_prompt())
                emit(text)
            else:
                send(text + '\t' + SYNC)
                until(lambda: scr.line.startswith(PROMPT) and scr.line.endswith(SYNC))
                offered = [r.rstrip() for r in scr.rows[n:]]
                if offered and offered[0] == (PROMPT + text).rstrip():
                    del offered[0]
                now = scr.line[len(PROMPT):-1]
                if now != text:
                    # completed
                    offered.append(now[:-1].split(' ')[-1] if now.endswith(' ') else '?' + now)
                shown[0] = len(scr.rows)
                out.append(PROMPT + text)
                out.append('\x01' + '\x02'.join(offered))
                send('\x15')
                until(scr.at_prompt)
        text = None
        k = 1
        while True:
            n = len(scr.rows)
            scr.running = True
            del scr.row[scr.col:]
            send('\x04')
            # (the next REPL of the program, if any, gets the same)
            until(lambda: scr.at_prompt(1 if len(scr.rows) > n else k + 1))
            k = 1 if len(scr.rows) > n else k + 1
            emit()
    except Gone:
        emit(text)
        if scr.row:
            out.append(scr.line)
        else:
            out.append('')
    except TimeoutError:
        rc = 2000
        stuck.append(lines)
        out.append('')
    os.close(master)
    if rc is None:
        try:
            p.wait(10)
            rc = p.returncode if p.returncode >= 0 else 1000 - p.returncode
        except subprocess.TimeoutExpired:
            rc = 2000
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    fe.seek(0)
    return Result(rc, '\n'.join(out), fe.read().decode('latin-1'))
