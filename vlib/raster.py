"""The real Inkscape as a rasteriser of SVG pages, driven without the code under test."""
import os
import subprocess


class Rasteriser:
    def __init__(self, binary="/usr/bin/inkscape"):
        self.binary = binary
        self.process = None

    def start(self):
        self.process = subprocess.Popen([self.binary, "--shell"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.wait()

    def wait(self):
        last = b""
        while True:
            c = os.read(self.process.stdout.fileno(), 4096)
            if not c:
                raise EOFError("Inkscape ended")
            last = (last + c)[-3:]
            if last.endswith(b"\n> ") or last == b"> ":
                return

    def command(self, *lines):
        for line in lines:
            self.process.stdin.write(line.encode() + b"\n")
            self.process.stdin.flush()
            self.wait()

    def stop(self):
        p, self.process = self.process, None
        if p is not None:
            p.kill()
            p.wait()
            p.stdin.close()
            p.stdout.close()

    def png(self, data, target):
        source = target + ".svg"
        with open(source, "wb") as f:
            f.write(data)
        for attempt in range(3):
            try:
                if self.process is None:
                    self.start()
                self.command("file-open:" + source, "export-area-page", "export-png-color-mode:RGBA_8", "export-background-opacity:0", "export-type:png", "export-filename:" + target, "export-do", "file-close")
            except (EOFError, BrokenPipeError):
                self.stop()
                continue
            except BaseException:
                # In the middle of an answer
                self.stop()
                raise
            if os.path.isfile(target):
                return
            self.stop()
        raise RuntimeError("Inkscape does not rasterise the page")
