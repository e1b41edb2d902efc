module vharness

go 1.23

require github.com/sonirico/visigoth v0.0.0

replace github.com/sonirico/visigoth => /repo
