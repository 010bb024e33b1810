package main

import (
	"database/sql"
	"reflect"
	"unsafe"

	ipersisters "github.com/pojntfx/stfs/internal/persisters"
	"github.com/pojntfx/stfs/pkg/persisters"
)

// dbOf finds the database of a persister, whatever its field is called.
func dbOf(p *persisters.MetadataPersister) *sql.DB {
	if p == nil {
		return nil
	}
	v := reflect.ValueOf(p).Elem()
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Type() == reflect.TypeOf((*ipersisters.SQLite)(nil)) {
			s := (*ipersisters.SQLite)(unsafe.Pointer(f.Pointer()))
			if s != nil {
				return s.DB
			}
		}
	}
	return nil
}

func closeDB(p *persisters.MetadataPersister) {
	if db := dbOf(p); db != nil {
		db.Close()
	}
}
