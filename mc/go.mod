module github.com/mewmew/float/vmc

go 1.23

require github.com/mewmew/float v0.0.0

replace github.com/mewmew/float => /repo
