#!/bin/bash
# Builds everything the checks need.
exec /verif/run.sh
