# sourced by run.sh: nothing is compiled, the harness runs the repository's Python and shell files themselves
export PYTHONHASHSEED=0
RUN=(/usr/bin/python3 "$HERE/harness/py/check.py" "$PROP")
