#!/bin/bash
# lists the fix commits of /repo (used when editing known_findings.txt)
git -C /repo log --reverse --format='%h %s' 19ddd85..HEAD
