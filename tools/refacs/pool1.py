F = "routinepool.go"
R("inc-plus", (F, """	c, ok := routinePoolKeyCountMap[key]
	if !ok {
		routinePoolKeyCountMap[key] = 1
	} else {
		routinePoolKeyCountMap[key] = c + 1
	}
""", """	routinePoolKeyCountMap[key]++
"""))
R("dec-early", (F, """	c, ok := routinePoolKeyCountMap[key]
	if ok {
		if c <= 1 {
			delete(routinePoolKeyCountMap, key)
		} else {
			routinePoolKeyCountMap[key] = c - 1
		}
	}
""", """	c, ok := routinePoolKeyCountMap[key]
	if !ok {
		return
	}
	if c > 1 {
		routinePoolKeyCountMap[key] = c - 1
		return
	}
	delete(routinePoolKeyCountMap, key)
"""))
R("event-early", (F, """	if v != nil && w.workFunc != nil {
		var key string
		if w.pool.keyGetter != nil {
			key = w.pool.keyGetter(v)
		}
		if len(key) > 0 {
			incKeyCount(key)
		}
		w.workFunc(w.name, v)
		if len(key) > 0 {
			decKeyCount(key)
		}
	}
""", """	if v == nil || w.workFunc == nil {
		return
	}
	key := w.keyOf(v)
	if key == "" {
		w.workFunc(w.name, v)
		return
	}
	incKeyCount(key)
	w.workFunc(w.name, v)
	decKeyCount(key)
}

func (w *pooledWorker) keyOf(v interface{}) string {
	if w.pool.keyGetter == nil {
		return ""
	}
	return w.pool.keyGetter(v)
"""))
R("work-next", (F, """	for {
		select {
		case <-w.quit:
			return
		case v := <-w.higher:
			// Process high priority event first
			w.event(v)
		default:
			// When there is no high priority event, randomly select event processing
			select {
			case <-w.quit:
				return
			case v := <-w.higher:
				// Processing the waiting high priority events
				w.event(v)
			case v := <-w.lower:
				// Processing the waiting low priority events
				w.event(v)
			}
		}
	}
}
""", """	for {
		v, ok := w.next()
		if !ok {
			return
		}
		w.event(v)
	}
}

func (w *pooledWorker) next() (interface{}, bool) {
	select {
	case <-w.quit:
		return nil, false
	case v := <-w.higher:
		return v, true
	default:
	}
	select {
	case <-w.quit:
		return nil, false
	case v := <-w.higher:
		return v, true
	case v := <-w.lower:
		return v, true
	}
}
"""))
R("start-range", (F, """	p.started = true
	p.quit = make(chan struct{})
	p.wg.Add(len(p.workers))
	for i := 0; i < len(p.workers); i++ {
		p.workers[i].quit = p.quit
		go p.workers[i].work()
	}
""", """	p.quit, p.started = make(chan struct{}), true
	for _, w := range p.workers {
		w.quit = p.quit
		p.wg.Add(1)
		go w.work()
	}
"""))
R("start-launch", (F, """	for i := 0; i < len(p.workers); i++ {
		p.workers[i].quit = p.quit
		go p.workers[i].work()
	}
}
""", """	for i := range p.workers {
		p.launch(p.workers[i])
	}
}

func (p *RoutinePool) launch(w *pooledWorker) {
	w.quit = p.quit
	go w.work()
}
"""))
R("stop-nest", (F, """	if !p.started {
		return
	}
	close(p.quit)
	p.started = false
	p.wg.Wait()
""", """	if p.started {
		p.started = false
		close(p.quit)
		p.wg.Wait()
	}
"""))
R("new-append", (F, """		workers:   make([]*pooledWorker, routineSize),
""", """		workers:   make([]*pooledWorker, 0, routineSize),
"""), (F, """		ret.workers[i] = &pooledWorker{
			pool:     ret,
			name:     ret.name + "-" + strconv.Itoa(i+1),
			quit:     ret.quit,
			higher:   ret.higher,
			lower:    ret.lower,
			workFunc: workFunc,
		}
""", """		w := &pooledWorker{
			pool:     ret,
			name:     ret.name + "-" + strconv.Itoa(i+1),
			quit:     ret.quit,
			higher:   ret.higher,
			lower:    ret.lower,
			workFunc: workFunc,
		}
		ret.workers = append(ret.workers, w)
"""))
