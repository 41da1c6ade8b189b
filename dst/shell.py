"""
Simulated external programs: every process started by the code under test is simulated (nothing is executed).

The seams are subprocess.Popen (used by subprocess.run, call, check_call, and check_output), os.system, and os.popen.
A small shell interprets the command lines (quotes, redirections, lists of commands).
"""

import contextlib
import errno
import io
import os
import re
import shlex
import shutil
import subprocess

from .core import HarnessError

REAL_POPEN = subprocess.Popen


class Shell:
    """
    Simulated programs.

        - tools: {name: function (argv, cwd) returning the exit code (negative: killed by a signal)}
        - plan: function (name, argv, number) called before a program is started (can raise, can return an exit code)
    """

    def __init__(self, env, tools, wrapper=0):
        self.env = env
        self.tools = tools
        self.wrapper = wrapper
        self.plan = None
        self.log = []
        self.pid = 1000

    def start(self, argv, cwd, shell):
        """Run a program until its end, return the exit code."""
        name = os.path.basename(argv[0])
        num = len(self.log)
        self.log.append(argv)
        self.env.step()
        if name not in self.tools:
            # nothing else is available
            self.env.event("unknown program", name)
            return self.missing(name, shell)
        act = None if self.plan is None else self.plan(name, argv, num)
        if act == "missing":
            return self.missing(name, shell)
        if act is not None and act[0] == "before":
            return act[1]
        code = self.tools[name](argv, cwd)
        if act is not None and act[0] == "after":
            return act[1]
        return code

    @staticmethod
    def missing(name, shell):
        if shell:
            return 127
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)

    def sh(self, cmd, cwd):
        """Interpret a command line."""
        lex = shlex.shlex(cmd, posix=True, punctuation_chars=True)
        lex.whitespace_split = True
        lex.commenters = ""
        tokens = list(lex)
        quoted = set(re.findall(r"'[^']*'|\"[^\"]*\"", cmd))
        plain = cmd
        for q in quoted:
            plain = plain.replace(q, " ")
        if re.search(r"[`$(){}*?\[\]~#\\!]", plain):
            # expansions are not supported, the command is garbage for the programs
            return 2
        code = 0
        words = []
        todo = tokens+[";"]
        skip = False
        pos = 0
        while pos < len(todo):
            tok = todo[pos]
            pos += 1
            if tok in (";", "&&", "||", "&", "|"):
                if words and not skip:
                    code = self.start(words, cwd, True)
                    if code < 0 and (self.wrapper or any(x in tokens for x in (";", "&&", "||", "&", "|"))):
                        code = 128-code
                    if tok == "&":
                        code = 0
                skip = (tok == "&&" and code != 0) or (tok == "||" and code == 0)
                words = []
            elif tok in (">", ">>", "<", ">&", "&>"):
                if words and words[-1].isdigit() and tok in (">", ">>", ">&"):
                    words.pop()
                target = todo[pos]
                pos += 1
                if tok in (">", ">>") and not target.startswith("&") and target != "/dev/null":
                    with open(os.path.join(cwd, target), "ab" if tok == ">>" else "wb"):
                        pass
            else:
                words.append(tok)
        return code

    def popen_class(self):
        """Replacement of subprocess.Popen."""
        owner = self

        class Popen:
            def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True, shell=False,
                         cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0, text=None, encoding=None, errors=None, **kwargs):
                self.args = args
                self.returncode = None
                owner.pid += 1
                self.pid = owner.pid
                is_text = bool(text or universal_newlines or encoding or errors)
                empty = (lambda: io.StringIO()) if is_text else (lambda: io.BytesIO())
                self.stdin = empty() if stdin == subprocess.PIPE else None
                self.stdout = empty() if stdout == subprocess.PIPE else None
                self.stderr = empty() if stderr == subprocess.PIPE else None
                self._text = is_text
                where = os.getcwd() if cwd is None else os.fspath(cwd)
                if not os.path.isdir(where):
                    raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), where)
                act = owner.plan("spawn", args, len(owner.log)) if owner.plan is not None else None
                if act is not None:
                    raise act
                if shell:
                    cmd = args if isinstance(args, (str, bytes)) else args[0]
                    cmd = os.fsdecode(cmd)
                    self._job = lambda: owner.sh(cmd, where)
                else:
                    argv = [os.fsdecode(args)] if isinstance(args, (str, bytes, os.PathLike)) else [os.fsdecode(x) for x in args]
                    code = owner.start(argv, where, False)
                    self._job = lambda: code
                self._exc = None

            def _finish(self):
                if self.returncode is None:
                    self.returncode = self._job()
                return self.returncode

            def wait(self, timeout=None):
                return self._finish()

            def poll(self):
                return self._finish()

            def communicate(self, input=None, timeout=None):
                self._finish()
                return (None if self.stdout is None else self.stdout.getvalue(), None if self.stderr is None else self.stderr.getvalue())

            def kill(self):
                self._killed()

            terminate = kill

            def send_signal(self, sig):
                self._killed()

            def _killed(self):
                if self.returncode is None:
                    self.returncode = -9

            def __enter__(self):
                return self

            def __exit__(self, *exc):
                if exc[0] is None:
                    self._finish()
                elif self.returncode is None:
                    self.returncode = -2
                return False

        return Popen

    @contextlib.contextmanager
    def active(self):
        cls = self.popen_class()
        saved = [(subprocess, "Popen", subprocess.Popen), (os, "system", os.system), (os, "popen", os.popen), (shutil, "which", shutil.which)]

        def system(cmd):
            code = self.sh(os.fsdecode(cmd), os.getcwd())
            return (-code) if code < 0 else code << 8

        def popen(cmd, mode="r", buffering=-1):
            raise HarnessError("os.popen is not simulated")

        def which(cmd, mode=os.F_OK | os.X_OK, path=None):
            return "/usr/bin/"+cmd if cmd in self.tools else None

        subprocess.Popen = cls
        os.system = system
        os.popen = popen
        shutil.which = which
        try:
            yield self
        finally:
            for obj, name, val in saved:
                setattr(obj, name, val)
