"""A remote host behind SshRemote: real programs run by a real shell on a real file whose name is symbolic.

A command line without symbolic parts is given to bash as it is. In one with symbolic parts the extent of the words
is found as a shell finds it; a word that is the path of the file is replaced by the path of the file under a plain
name before bash gets to see it, and in the output the plain name is replaced by the real one. If a symbolic
character is anything but a plain or a quoted character, then the values of that run are taken and bash gets the whole
command. When replayed, bash gets the whole command always."""
import os
import shutil
import subprocess
import tempfile
from augpathlib import remotes

PLAIN = 'alias-of-the-file'
OTHER = 'alias-of-nothing'


class Complex(Exception):
    pass


def is_concrete(s):
    try:
        from sx.values import has_sym
    except ImportError:
        return True
    return not has_sym(s)


def concrete(s):
    try:
        from sx.values import deep_conc
    except ImportError:
        return s
    return deep_conc(s)


def words(cmd):
    """[(is it a word with symbolic parts, its source text or its value)]"""
    out = []
    i, n = 0, len(cmd)
    start, value, symbolic, quoted = 0, '', False, False
    mode = ''

    def end(i):
        if symbolic:
            out.append((True, value))
        elif i > start:
            out.append((False, cmd[start:i]))
    while i < n:
        c = cmd[i]
        sym = not is_concrete(c)
        if sym:
            symbolic = True
        if mode == "'":
            if c == "'":
                mode = ''
            else:
                value = value + c
        elif mode == '"':
            if c == '"':
                mode = ''
            elif c == '\\' or c == '$' or c == '`' or c == '!':
                if sym or symbolic:
                    raise Complex
                value = value + c
                if c == '\\':
                    i += 1
                    value = value + cmd[i]
            else:
                value = value + c
        elif c == "'" or c == '"':
            mode = "'" if c == "'" else '"'
        elif not sym and c in ' \n;|&<>()':
            end(i)
            out.append((False, c))
            start, value, symbolic = i + 1, '', False
        elif sym:
            if ('a' <= c <= 'z' or 'A' <= c <= 'Z' or '+' <= c <= ':' or c == '_' or c == '=' or c == '@' or c == '%' or c > '~'):
                value = value + c
            else:
                raise Complex
        elif c in '\\$`*?[#~{!':
            if symbolic:
                raise Complex
            value = value + c
            if c == '\\':
                i += 1
                value = value + cmd[i]
        else:
            value = value + c
        i += 1
    if mode:
        raise Complex
    end(n)
    return out


def current(s):
    """the values of this run"""
    try:
        from sx.values import shadow
    except ImportError:
        return s
    return shadow(s)


class Host:
    def __init__(self, ctx, name, content=None, mode=0o640, ids=None):
        """content None: there is no such file, True: it is a folder"""
        self.dir = tempfile.mkdtemp(prefix='sx-ssh-')
        self.name, self.content, self.mode = name, content, mode
        self.path = self.dir + '/r/' + name
        os.mkdir(self.dir + '/r')
        os.mkdir(self.dir + '/cwd')
        self.made = set()
        self.make(PLAIN)
        if is_concrete(name):
            self.make(name)
        self.commands = []
        self.path_env = os.environ.get('PATH', '/usr/bin:/bin')
        if ids:
            uid, gids = ids
            os.mkdir(self.dir + '/bin')
            with open(self.dir + '/bin/id', 'w') as f:
                f.write('#!/bin/sh\ncase $1 in -u) echo %d;; -g) echo %d;; -G) echo %s;; *) exit 1;; esac\n' % (
                    uid, gids[0], ' '.join([str(g) for g in gids])))
            os.chmod(self.dir + '/bin/id', 0o755)
            self.path_env = self.dir + '/bin:' + self.path_env

    def make(self, name):
        p = self.dir + '/r/' + name
        if p in self.made or self.content is None:
            return
        self.made.add(p)
        if self.content is True:
            os.mkdir(p)
        else:
            with open(p, 'wb') as f:
                f.write(self.content)
        os.utime(p, (1600000000, 1600000001))
        os.chmod(p, self.mode)

    def bash(self, cmd):
        env = dict(PATH=self.path_env, LC_ALL='C.UTF-8', HOME=self.dir + '/cwd')
        p = subprocess.run(['bash', '--norc', '-c', cmd.encode()], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, cwd=self.dir + '/cwd', env=env)
        return p.returncode, p.stdout

    def run(self, cmd):
        self.commands.append(cmd)
        if is_concrete(cmd):
            self.make(current(self.name))
            return self.bash(cmd)
        try:
            ws = words(cmd)
        except Complex:
            name = concrete(self.name)
            self.make(name)
            return self.bash(concrete(cmd))
        line = ''
        alias = None
        for is_word, w in ws:
            if is_word:
                alias = self.dir + '/r/' + (PLAIN if w == self.path else OTHER)
                other = w
                line = line + alias
            else:
                line = line + w
        rc, out = self.bash(line)
        if alias is not None and alias.encode() in out:
            head, _, tail = out.partition(alias.encode())
            out = head + other.encode() + tail
        return rc, out

    def session(self):
        host = self

        class Session:
            def __init__(self, **k):
                pass

            def login(self, *a, **k):
                pass
            setwinsize = prompt = sendeof = close = login

            def sendline(self, cmd):
                rc, out = host.run(cmd)
                raw = cmd.encode()
                self.before = raw + b'\r\n' + out.replace(b'\n', b'\r\n')
                return len(raw) + 1
        return Session

    def popen(self):
        """for subprocess in remotes: `ssh host command`"""
        host = self

        class Stdout:
            def __init__(self, data):
                self.data = data

            def read(self, n=-1):
                if n < 0:
                    n = len(self.data)
                out, self.data = self.data[:n], self.data[n:]
                return out

            def close(self):
                pass

        class Popen:
            def __init__(self, cmd, **k):
                ssh, name, *cmd = cmd
                assert ssh == 'ssh' and name == 'host', (ssh, name)
                line = cmd[0]
                for c in cmd[1:]:
                    line = line + ' ' + c
                self.code, out = host.run(line)
                self.returncode = None
                self.stdout = Stdout(out)

            def communicate(self, *a, **k):
                self.returncode = self.code
                return b'', None

            def wait(self, *a, **k):
                self.returncode = self.code
                return self.code

            poll = wait

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.wait()

        class Module:
            def __getattr__(self, n):
                return getattr(subprocess, n)
        m = Module()
        m.Popen = Popen

        def run(cmd, check=False, **k):
            p = Popen(cmd)
            p.wait()
            if check and p.returncode:
                raise subprocess.CalledProcessError(p.returncode, cmd)
            return subprocess.CompletedProcess(cmd, p.returncode, p.stdout.read(), None)
        m.run = run
        m.check_output = lambda cmd, **k: run(cmd, check=True).stdout
        return m

    def __enter__(self):
        self.old = remotes.pxssh, remotes.subprocess
        host = self

        class X:
            pxssh = host.session()
        remotes.pxssh, remotes.subprocess = X, self.popen()
        return self

    def __exit__(self, *a):
        remotes.pxssh, remotes.subprocess = self.old
        shutil.rmtree(self.dir, ignore_errors=True)
