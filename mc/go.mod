module verifmc

go 1.27

require github.com/liyue201/gostl v0.0.0

replace github.com/liyue201/gostl => /repo
