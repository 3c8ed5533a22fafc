module vharness

go 1.26

require github.com/spacemonkeygo/monkit/v3 v3.0.0

replace github.com/spacemonkeygo/monkit/v3 => /repo
