#!/bin/bash
cd /verif && python3 tools/mkprops.py && PYTHONPATH=/repo /opt/venv/bin/python tools/mkmanifest.py && PYTHONPATH=/repo /opt/venv/bin/python tools/mkdesign.py
