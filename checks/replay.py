"""python -m checks.replay <file>: run the recorded input on the real code again"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    d = json.load(open(sys.argv[1]))
    if 'case' not in d:
        print(json.dumps(d, indent=1))
        print('no failing input was found for this obligation')
        return 1
    from checks import props                           # noqa: F401  (registers the case kinds)
    from checks.run import run_case
    from oracle import cases as C
    print(C.text(d['case']))
    r = run_case(d['case'])
    print('agrees with the contract' if r is None else r)
    return 1 if r is not None and r[0] == 'bad' else 0


if __name__ == '__main__':
    sys.exit(main())
