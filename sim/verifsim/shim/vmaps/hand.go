//go:build go1.23

package vmaps

import (
	"iter"
	rt "maps"

	"github.com/cloudflare/cfrpki/verifsim"
)

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		var k K
		var v V
		for it := verifsim.Iter(m); it.Next(&k, &v); {
			if !yield(k, v) {
				return
			}
		}
	}
}

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range All(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range All(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Clone[M ~map[K]V, K comparable, V any](m M) M                         { return rt.Clone(m) }
func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V             { return rt.Collect(seq) }
func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V])     { rt.Insert(m, seq) }
func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) { rt.DeleteFunc(m, del) }
func Equal[M1, M2 ~map[K]V, K, V comparable](m1 M1, m2 M2) bool            { return rt.Equal(m1, m2) }
func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2)   { rt.Copy(dst, src) }
func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](m1 M1, m2 M2, eq func(V1, V2) bool) bool {
	return rt.EqualFunc(m1, m2, eq)
}
