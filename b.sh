#!/bin/bash
# dev helper: build vmon and the command
. /opt/vp/env.sh
cd /repo && go build -buildvcs=false -ldflags "-X main.version=9.9.9" -o /verif/bin/html2markdown ./cli/html2markdown
cd /verif/harness && go build -o /verif/bin/vmon ./vmon
