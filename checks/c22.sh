# Every feature set has a build of its own.
python3 "$HERE/checks/c22.py" run
