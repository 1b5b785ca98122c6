module verif.local/mc

go 1.24

require github.com/zhangyunhao116/skipset v0.0.0

replace github.com/zhangyunhao116/skipset => ../skipset
