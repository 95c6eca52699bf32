. "$HERE/checks/compile.sh"
