"""Results of fresh processes: for every text on stdin (a JSON list), fork this
pristine process - which has imported the library and run nothing - and report
what formatting and validating the text gives.  Prints a JSON list."""
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from mc import core, judges  # noqa


def observe(text):
    try:
        out = ["text", judges.fmt(text)]
    except judges.Refused as e:
        out = ["refused", str(e)]
    v, errors = judges.verdict(text)
    return [out, v, errors]


def main():
    texts = json.load(sys.stdin)
    results = []
    for text in texts:
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                data = json.dumps(observe(text))
            except BaseException as e:
                data = json.dumps([["raised", repr(e)], None, []])
            with os.fdopen(w, "w") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            results.append(json.loads(f.read()))
        os.waitpid(pid, 0)
    json.dump(results, sys.stdout)


def fresh(texts, hashseed="0"):
    """Baselines from another process with the given hash seed."""
    import subprocess

    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    p = subprocess.run(
        [sys.executable, os.path.abspath(__file__)],
        input=json.dumps(texts),
        capture_output=True,
        text=True,
        env=env,
        check=True,
    )
    return json.loads(p.stdout)


if __name__ == "__main__":
    main()
