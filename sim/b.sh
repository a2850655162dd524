cd /verif/sim && /verif/check.sh build
