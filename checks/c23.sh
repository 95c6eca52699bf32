# The explorer runs under Miri, with a build of its own.
python3 "$HERE/checks/c23.py" run
