#!/bin/bash
# fresh scratch copy of /repo
rm -rf /tmp/mr; cp -a /repo /tmp/mr
