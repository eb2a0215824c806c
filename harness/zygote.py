"""
A process that has never rendered anything, and makes a copy of itself for every
document that it is asked to render: what comes out of that cannot depend on anything
that was rendered before.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
import dom


def one(request):
    try:
        return {'out': dom.render(request['source'], **request['cfg'])}
    except core.Violation as v:
        return {'error': str(v)}


def main():
    with core.library():
        import gopher_render.rendering
    for line in sys.stdin:
        request = json.loads(line)
        read, write = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(read)
            with os.fdopen(write, 'w') as f:
                json.dump(one(request), f)
            os._exit(0)
        os.close(write)
        with os.fdopen(read) as f:
            answer = f.read()
        os.waitpid(pid, 0)
        sys.stdout.write((answer or '{"error": "no answer"}') + '\n')
        sys.stdout.flush()


if __name__ == '__main__':
    main()
