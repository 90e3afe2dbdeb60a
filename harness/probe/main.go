package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"

	"github.com/mrasu/GravityR/database/dmodel"
	"github.com/mrasu/GravityR/database/mysql/mservice"
	"github.com/mrasu/GravityR/database/postgres/pservice"
	"github.com/mrasu/GravityR/zz_verif/env"
	"github.com/rs/zerolog"
)

func main() {
	zerolog.SetGlobalLevel(zerolog.Disabled)
	s := &env.Schema{Tables: []env.Table{{"a", []string{"id", "x", "y", "name"}, []string{"id"}}, {"b", []string{"id", "aid", "x", "z", "name"}, []string{"id"}}, {"c", []string{"id", "bid", "w"}, []string{"id"}}}}
	sc := bufio.NewScanner(os.Stdin)
	for sc.Scan() {
		l := sc.Text()
		if l == "" {
			continue
		}
		d, q := l[:1], l[2:]
		seen := map[string]int{}
		for i := 0; i < 300; i++ {
			func() {
				defer func() {
					if p := recover(); p != nil {
						seen[fmt.Sprint("PANIC ", p)]++
					}
				}()
				w := &env.World{Schema: s}
				var its []*dmodel.IndexTarget
				var err error
				if d == "m" {
					its, err = mservice.NewIndexSuggester(w.MySQL(), "db").Suggest(q)
				} else {
					its, err = pservice.NewIndexSuggester(w.Postgres(), "public").Suggest(q)
				}
				if err != nil {
					seen["ERR "+err.Error()]++
					return
				}
				var o []string
				for _, it := range its {
					var cs []string
					for _, c := range it.Columns {
						cs = append(cs, c.Name)
					}
					o = append(o, it.TableName+"("+strings.Join(cs, ",")+")")
				}
				seen[strings.Join(o, " ")]++
			}()
		}
		fmt.Println(l)
		for k, v := range seen {
			fmt.Printf("    %d× %s\n", v, k)
		}
	}
}
