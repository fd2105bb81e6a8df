// Package lru is an offline stand-in for github.com/hashicorp/golang-lru/v2.
package lru

import (
	"container/list"
	"errors"
	"sync"
)

type entry[K comparable, V any] struct {
	k K
	v V
}

type Cache[K comparable, V any] struct {
	mu   sync.Mutex
	size int
	ll   *list.List
	m    map[K]*list.Element
}

func New[K comparable, V any](size int) (*Cache[K, V], error) {
	if size <= 0 {
		return nil, errors.New("must provide a positive size")
	}
	return &Cache[K, V]{size: size, ll: list.New(), m: map[K]*list.Element{}}, nil
}

func (c *Cache[K, V]) Add(key K, value V) (evicted bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e, ok := c.m[key]; ok {
		c.ll.MoveToFront(e)
		e.Value = entry[K, V]{key, value}
		return false
	}
	c.m[key] = c.ll.PushFront(entry[K, V]{key, value})
	if c.ll.Len() > c.size {
		b := c.ll.Back()
		c.ll.Remove(b)
		delete(c.m, b.Value.(entry[K, V]).k)
		return true
	}
	return false
}

func (c *Cache[K, V]) Get(key K) (value V, ok bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e, ok := c.m[key]; ok {
		c.ll.MoveToFront(e)
		return e.Value.(entry[K, V]).v, true
	}
	return
}

func (c *Cache[K, V]) Contains(key K) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	_, ok := c.m[key]
	return ok
}
func (c *Cache[K, V]) Peek(key K) (value V, ok bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e, ok := c.m[key]; ok {
		return e.Value.(entry[K, V]).v, true
	}
	return
}
func (c *Cache[K, V]) Len() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.ll.Len()
}
func (c *Cache[K, V]) Remove(key K) bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	if e, ok := c.m[key]; ok {
		c.ll.Remove(e)
		delete(c.m, key)
		return true
	}
	return false
}
func (c *Cache[K, V]) Purge() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.ll.Init()
	c.m = map[K]*list.Element{}
}

// Keys lists the keys from the oldest to the newest.
func (c *Cache[K, V]) Keys() (res []K) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for e := c.ll.Back(); e != nil; e = e.Prev() {
		res = append(res, e.Value.(entry[K, V]).k)
	}
	return
}
