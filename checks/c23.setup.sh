VERIF_ROOT="$HERE" python3 "$HERE/checks/c23.py" setup
