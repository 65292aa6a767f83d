#!/usr/bin/env python3
"""Builds the kit that the demonstrations of planted bugs compile against: the
declaration-only headers of analysis/stubs with data members added, plus small
working definitions (impl.cpp) of the handful of library calls they reach."""
import os, re, shutil, sys
here = os.path.dirname(os.path.abspath(__file__))
src = os.path.join(here, '..', 'analysis', 'stubs')


def kit(dst):
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, os.path.join(dst, 'include'))
    h = os.path.join(dst, 'include', 'mfem.hpp')
    s = open(h).read()
    s = s.replace('class Vector {\npublic:\n', 'class Vector {\npublic:\n    double* d_ = nullptr; int n_ = 0; bool own_ = false;\n', 1)
    s = s.replace('template <class T> class Array {\npublic:\n', 'template <class T> class Array {\npublic:\n    T* d_ = nullptr; int n_ = 0; bool own_ = false;\n', 1)
    s = s.replace('class DenseMatrix : public Matrix {\npublic:\n', 'class DenseMatrix : public Matrix {\npublic:\n    std::vector<double> a_; int h_ = 0, w_ = 0;\n', 1)
    open(h, 'w').write(s)
    shutil.copy(os.path.join(here, 'impl.cpp'), dst)
    shutil.copy(os.path.join(here, 'kit.sh'), dst)


if __name__ == '__main__':
    for d in sys.argv[1:]:
        kit(os.path.join(d, 'kit'))
