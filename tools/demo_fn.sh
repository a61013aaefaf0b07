demo(){ mkdir -p seeded/$1; cat > seeded/$1/demo.cpp
cat > seeded/$1/demo.sh <<E
#!/bin/bash
# builds demo.cpp against the sources in the current directory (/repo) and runs it
D=\$(cd "\$(dirname "\$0")" && pwd); T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
g++ -std=c++17 -O1 -w -Isolver/include $3 -isystem /usr/include/eigen3 "\$D/demo.cpp" -o "\$T/demo" $2 -pthread || exit 3
timeout 120 "\$T/demo"
E
}
LIBS='-L_build -lsolver -Wl,-rpath,"$PWD/_build" -lyaml-cpp'
LQR="-I\"\$D\" -Isolver_lqr/include -DCFG_PATH='\"solver_lqr/config/\"' -DCFG_SRC_PATH='\"solver_lqr/config/\"' -DTEST_PATH='\"solver_lqr/tests/\"'"
lqr_demo(){ demo "$1" "solver_lqr/src/solver_lqr/*.cpp $LIBS -lboost_thread -lboost_system" "$LQR"; cp -r stubs/yaml_utils seeded/$1/; cp tools/lqr_demo.hpp seeded/$1/; }
# mom_demo ID "sources under momentumopt/src/momentumopt": demo.cpp on stdin
mom_demo(){ B=${SEEDED:-seeded}; mkdir -p $B/$1; cat > $B/$1/demo.cpp; cp -r ${STUBS:-stubs}/yaml_utils $B/$1/; cp ${TOOLS:-tools}/mom_demo.hpp $B/$1/
cat > $B/$1/demo.sh <<F
#!/bin/bash
# compiles demo.cpp with sources of momentumopt in the current directory (/repo) and runs it
D=\$(cd "\$(dirname "\$0")" && pwd); export DEMO_TMP=\$(mktemp -d); T=\$DEMO_TMP; trap 'rm -rf "\$T"' EXIT
F="-std=c++17 -O1 -w -I\$D -Imomentumopt/include -Isolver/include -Isolver_lqr/include -isystem /usr/include/eigen3 -DCFG_PATH='\"momentumopt/config/\"' -DCFG_SRC_PATH='\"momentumopt/config/\"' -DTEST_PATH='\"momentumopt/tests/\"'"
S="\$D/demo.cpp \$(ls $2)"
export F T
echo "\$S" | tr ' ' '\n' | xargs -P 8 -I{} sh -c 'eval g++ \$F -c {} -o "\$T/\$(echo {} | tr / _).o"' || exit 3
g++ "\$T"/*.o -o "\$T/demo" -L_build -lsolver -Wl,-rpath,"\$PWD/_build" -lyaml-cpp -lboost_thread -lboost_system -pthread || exit 3
timeout 120 "\$T/demo"
F
}
# py_demo ID: demo.py on stdin; stand-ins for packages that are not installed lie beside it
py_demo(){ B=${SEEDED:-seeded}; mkdir -p $B/$1; cat > $B/$1/demo.py; cp ${TOOLS:-tools}/standins.py $B/$1/
cat > $B/$1/demo.sh <<'F'
#!/bin/bash
# runs demo.py on the Python sources in the current directory (/repo)
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
DEMO_TMP=$T PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 timeout 200 /opt/vp/venv/bin/python "$D/demo.py"
F
}
