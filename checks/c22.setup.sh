VERIF_ROOT="$HERE" python3 "$HERE/checks/c22.py" setup
